package xmssmt

// C14: retirement of sequence numbers and dropping of cached subtrees.

// gvcRetireState: any set of finished and unfinished numbers, as far as the
// heap of finished numbers beyond the least unfinished one has at most three
// elements.
func gvcRetireState(sk *PrivateKey, k int) []uint64 {
	least := gvcRange("least unfinished", 0, 1<<62)
	sk.leastSeqNoInUse = SignatureSeqNo(least)
	var fin []uint64
	h := seqNoHeap{}
	for i := 0; i < k; i++ {
		fin = append(fin, least+1+gvcRange("finished", 0, 1<<32-2))
		h = append(h, SignatureSeqNo(fin[i]))
		gvcAssume(fin[i] < uint64(sk.seqNo))
		for j := 0; j < i; j++ {
			gvcAssume(fin[i] != fin[j])
		}
		if i > 0 {
			gvcAssume(fin[(i-1)/2] < fin[i])
		}
	}
	sk.retiredSeqNos = &h
	return fin
}

func gvcIn64(x uint64, l []uint64) bool {
	r := false
	for _, y := range l {
		if x == y {
			r = true
		}
	}
	return r
}

//gvc:harness C14 bounded="at most 3 signatures finished before an earlier one"
func hC14Retire() {
	var p Params
	k := 0
	if gvcThorough() {
		p = gvcKeyParams()
		k = gvcChoose("finished numbers", 4)
	} else {
		c := [8][3]uint32{{4, 2, 0}, {4, 2, 2}, {6, 3, 1}, {10, 1, 3}, {40, 2, 2}, {60, 6, 0}, {6, 3, 0}, {60, 3, 1}}[gvcChoose("height/layers/finished", 8)]
		p = Params{Func: SHA2, N: 32, WotsW: 16, FullHeight: c[0], D: c[1], Prf: RFC}
		k = int(c[2])
		if !gvcSymbolic() && c[0]/c[1] > 2 {
			gvcStop()
		}
	}
	sk, ctr := gvcAnyKey(p, false)
	s := uint64(sk.seqNo)
	gvcAssume(s <= uint64(1)<<p.FullHeight-1)
	fin := gvcRetireState(sk, k)
	least := uint64(sk.leastSeqNoInUse)
	x := least + gvcRange("finished now", 0, 1<<32-1)
	gvcAssume(x < s && !gvcIn64(x, fin))
	gvcAssume(s-least < 1<<32)
	n0 := uint64(sk.UnretiredSeqNos())
	gvcAssert(n0 == s-least-uint64(len(fin)), "UnretiredSeqNos is the number of signatures begun but not finished")
	probe := SubTreeAddress{Layer: uint32(gvcFork("layer", int(p.D))), Tree: gvcU64("tree")}
	sk.subTreeReady[probe] = true
	sk.subTreeChecked[probe] = true
	ctr.faults = gvcFork("container fails", 2) == 1
	sk.retireSeqNo(SignatureSeqNo(x))
	gvcAssert(!gvcHeld(&sk.mux), "the lock is released")
	gvcAssert(uint64(sk.seqNo) == s && ctr.writes == 0, "retiring does not change the next sequence number")
	gvcAssert(uint64(sk.UnretiredSeqNos()) == n0-1, "UnretiredSeqNos is the number of signatures begun but not finished")
	l := uint64(sk.leastSeqNoInUse)
	all := append(append([]uint64(nil), fin...), x)
	gvcAssert(l == s || l < s && !gvcIn64(l, all), "the least number in use is not finished")
	m := int(gvcConcrete64(l-least, len(all)))
	for i := 0; i < m; i++ {
		gvcAssert(gvcIn64(least+uint64(i), all), "every number below the least one in use is finished")
	}
	h := *sk.retiredSeqNos
	gvcAssert(len(h) == len(all)-m, "finished numbers are remembered until all earlier ones are finished")
	for i := range h {
		gvcAssert(uint64(h[i]) > l && gvcIn64(uint64(h[i]), all), "finished numbers are remembered until all earlier ones are finished")
		for j := 0; j < i; j++ {
			gvcAssert(h[i] != h[j], "finished numbers are remembered once")
		}
		if i > 0 {
			gvcAssert(h[(i-1)/2] < h[i], "the least remembered number comes first")
		}
	}
	gvcCheckDropped(sk, ctr, least, m, probe)
}

// gvcConcrete64: the value of x, at most max, by cases.
func gvcConcrete64(x uint64, max int) uint64 {
	for i := 0; i <= max; i++ {
		if x == uint64(i) {
			return uint64(i)
		}
	}
	gvcAssert(false, "no more numbers are freed than are finished")
	return 0
}

// The subtrees dropped when the least number in use goes from least to
// least + m are those whose last number is in between.
func gvcCheckDropped(sk *PrivateKey, ctr *gvcCtr, least uint64, m int, probe SubTreeAddress) {
	h := sk.ctx.treeHeight
	isDropped := false
	for _, d := range ctr.dropped {
		if d == probe {
			isDropped = true
		}
		sh := (d.Layer + 1) * h
		gvcAssert(d.Layer < sk.ctx.p.D && d.Tree < uint64(1)<<(sk.ctx.p.FullHeight-sh), "what is dropped is a subtree")
		last := (d.Tree+1)<<sh - 1
		gvcAssert(last < uint64(sk.leastSeqNoInUse), "a subtree is dropped only after all signatures it serves are finished")
	}
	_, ready := sk.subTreeReady[probe]
	_, checked := sk.subTreeChecked[probe]
	gvcAssert(ready == !isDropped && checked == !isDropped, "a subtree that was dropped, and no other, is forgotten")
	for i := 0; i < m; i++ {
		q := least + uint64(i)
		for j := uint32(0); j < sk.ctx.p.D; j++ {
			if (q+1)&(1<<((j+1)*h)-1) != 0 {
				break
			}
			want := SubTreeAddress{Layer: j, Tree: q >> ((j + 1) * h)}
			found := false
			for _, d := range ctr.dropped {
				if d == want {
					found = true
				}
			}
			gvcAssert(found, "a subtree is dropped when all signatures it serves are finished")
		}
	}
}
